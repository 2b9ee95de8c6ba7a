// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types, improper_ctypes_definitions)]
use vstd::prelude::*;
verus! {
//@include base.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item config.rs::HtpServerPersonality
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item config.rs::HtpUnwanted
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item config.rs::HtpUrlEncodingHandling
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item log.rs::HtpLogLevel
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
// the callbacks of an event: only the list of registered callbacks matters here (unit hook)
#[verifier::external_body] pub struct Param { _0: u8 }
macro_rules! hooks { ($($h:ident $c:ident $x:ident),*) => { verus! { $(
    #[verifier::external_body] pub struct $h { _0: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct $c { _0: u8 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct $x { _0: u8 }
    impl $h {
        pub uninterp spec fn reg(&self, c: $c) -> $h;
        pub uninterp spec fn regx(&self, c: $x) -> $h;
        #[verifier::external_body] pub fn register(&mut self, c: $c) ensures *final(self) == old(self).reg(c) { unimplemented!() }
        #[verifier::external_body] pub fn register_extern(&mut self, c: $x) ensures *final(self) == old(self).regx(c) { unimplemented!() }
    }
)* } } }
hooks!(TxHook TxNativeCallbackFn TxExternalCallbackFn, DataHook DataNativeCallbackFn DataExternalCallbackFn, LogHook LogNativeCallbackFn LogExternalCallbackFn);
#[verifier::external_body] #[derive(Clone, Copy)] pub struct FnvMap { _0: u8 }
/*@ item unicode_bestfit_map.rs::UnicodeBestfitMap
subst: & 'static HashMap < u32 , u8 > =>> FnvMap
attr: #[derive(Clone, Copy)]
@*/
pub struct LzmaOptions { pub memlimit: Option<usize>, pub other: LzmaRest }
#[verifier::external_body] pub struct LzmaRest { _0: u8 }
/// lzma_rs's defaults
pub uninterp spec fn lzma_rest() -> LzmaRest;
#[verifier::external_body] pub fn vx_lzma(memlimit: usize) -> (r: LzmaOptions) ensures r.memlimit == Some(memlimit), r.other == lzma_rest() { unimplemented!() }
/*@ item decompressors.rs::Options
subst: lzma_rs :: decompress :: Options =>> LzmaOptions
@*/
/*@ item config.rs::DecoderConfig
@*/
/*@ item config.rs::Config
subst: Option < fn ( _ : & mut Param ) -> Result < ( ) > > =>> Option<Param>
@*/
/*@ fn config.rs::Config::set_double_decode_normalized_path
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { double_decode_normalized_path: double_decode_normalized_path, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_double_decode_normalized_query
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { double_decode_normalized_query: double_decode_normalized_query, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_parse_urlencoded
spec: ensures *final(self) == (Config { parse_urlencoded: parse_urlencoded, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_field_limit
spec: ensures *final(self) == (Config { field_limit: field_limit, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_allow_space_uri
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { allow_space_uri: allow_space, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_tx_auto_destroy
spec: ensures *final(self) == (Config { tx_auto_destroy: tx_auto_destroy, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_flush_incomplete
spec: ensures *final(self) == (Config { flush_incomplete: flush_incomplete, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_bestfit_map
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { bestfit_map: map, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_bestfit_replacement_byte
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { bestfit_map: UnicodeBestfitMap { replacement_byte: b, ..old(self).decoder_cfg.bestfit_map }, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_url_encoding_invalid_handling
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { url_encoding_invalid_handling: handling, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_nul_raw_terminates
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { nul_raw_terminates: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_nul_encoded_terminates
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { nul_encoded_terminates: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_u_encoding_decode
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { u_encoding_decode: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_backslash_convert_slashes
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { backslash_convert_slashes: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_path_separators_decode
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { path_separators_decode: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_path_separators_compress
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { path_separators_compress: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_plusspace_decode
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { plusspace_decode: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_convert_lowercase
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { convert_lowercase: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_utf8_convert_bestfit
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { utf8_convert_bestfit: enabled, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_u_encoding_unwanted
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { u_encoding_unwanted: unwanted, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_control_chars_unwanted
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { control_chars_unwanted: unwanted, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_normalized_uri_include_all
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { normalized_uri_include_all: set, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_url_encoding_invalid_unwanted
spec: ensures *final(self) == (Config { decoder_cfg: DecoderConfig { url_encoding_invalid_unwanted: unwanted, ..old(self).decoder_cfg }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_requestline_leading_whitespace_unwanted
spec: ensures *final(self) == (Config { requestline_leading_whitespace_unwanted: unwanted, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_request_decompression
spec: ensures *final(self) == (Config { request_decompression_enabled: set, ..*old(self) }),
@*/
/*@ fn config.rs::Config::set_decompression_layer_limit
spec: ensures *final(self) == (Config { compression_options: Options { layer_limit: limit, ..old(self).compression_options }, ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_log
spec: ensures *final(self) == (Config { hook_log: old(self).hook_log.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_complete
spec: ensures *final(self) == (Config { hook_request_complete: old(self).hook_request_complete.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_body_data
spec: ensures *final(self) == (Config { hook_request_body_data: old(self).hook_request_body_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_header_data
spec: ensures *final(self) == (Config { hook_request_header_data: old(self).hook_request_header_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_headers
spec: ensures *final(self) == (Config { hook_request_headers: old(self).hook_request_headers.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_line
spec: ensures *final(self) == (Config { hook_request_line: old(self).hook_request_line.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_start
spec: ensures *final(self) == (Config { hook_request_start: old(self).hook_request_start.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_trailer
spec: ensures *final(self) == (Config { hook_request_trailer: old(self).hook_request_trailer.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_request_trailer_data
spec: ensures *final(self) == (Config { hook_request_trailer_data: old(self).hook_request_trailer_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_body_data
spec: ensures *final(self) == (Config { hook_response_body_data: old(self).hook_response_body_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_complete
spec: ensures *final(self) == (Config { hook_response_complete: old(self).hook_response_complete.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_header_data
spec: ensures *final(self) == (Config { hook_response_header_data: old(self).hook_response_header_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_headers
spec: ensures *final(self) == (Config { hook_response_headers: old(self).hook_response_headers.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_line
spec: ensures *final(self) == (Config { hook_response_line: old(self).hook_response_line.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_start
spec: ensures *final(self) == (Config { hook_response_start: old(self).hook_response_start.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_trailer
spec: ensures *final(self) == (Config { hook_response_trailer: old(self).hook_response_trailer.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_response_trailer_data
spec: ensures *final(self) == (Config { hook_response_trailer_data: old(self).hook_response_trailer_data.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn config.rs::Config::register_transaction_complete
spec: ensures *final(self) == (Config { hook_transaction_complete: old(self).hook_transaction_complete.reg(cbk_fn), ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::set_lzma_layers
spec: ensures *final(self) == (Options { lzma_layers: layers, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_lzma_layers
ret: r
spec: ensures r == self.lzma_layers,
@*/
/*@ fn decompressors.rs::Options::set_bomb_limit
spec: ensures *final(self) == (Options { bomb_limit: bomblimit, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_bomb_limit
ret: r
spec: ensures r == self.bomb_limit,
@*/
/*@ fn decompressors.rs::Options::set_bomb_ratio
spec: ensures *final(self) == (Options { bomb_ratio: bomb_ratio, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_bomb_ratio
ret: r
spec: ensures r == self.bomb_ratio,
@*/
/*@ fn decompressors.rs::Options::set_time_limit
spec: ensures *final(self) == (Options { time_limit: time_limit, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_time_limit
ret: r
spec: ensures r == self.time_limit,
@*/
/*@ fn decompressors.rs::Options::set_time_test_freq
spec: ensures *final(self) == (Options { time_test_freq: time_test_freq, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_time_test_freq
ret: r
spec: ensures r == self.time_test_freq,
@*/
/*@ fn decompressors.rs::Options::set_layer_limit
spec: ensures *final(self) == (Options { layer_limit: layer_limit, ..*old(self) }),
@*/
/*@ fn decompressors.rs::Options::get_layer_limit
ret: r
spec: ensures r == self.layer_limit,
@*/
/*@ fn decompressors.rs::Options::set_lzma_memlimit
pre: lzma_rs :: decompress :: Options { memlimit : Some ( memlimit ) , .. Default :: default ( ) } =>> vx_lzma(memlimit)
spec: ensures final(self).lzma is Some == (memlimit != 0), memlimit != 0 ==> final(self).lzma->0.memlimit == Some(memlimit) && final(self).lzma->0.other == lzma_rest(),
    *final(self) == (Options { lzma: final(self).lzma, ..*old(self) }),
@*/
/// the settings a personality names; it leaves all others alone
pub open spec fn vx_personality(c: Config, p: HtpServerPersonality) -> Config {
    let d = c.decoder_cfg;
    match p {
        HtpServerPersonality::GENERIC => Config { decoder_cfg: DecoderConfig { backslash_convert_slashes: true, path_separators_decode: true, path_separators_compress: true, ..d }, ..c },
        HtpServerPersonality::IDS => Config { requestline_leading_whitespace_unwanted: HtpUnwanted::IGNORE, decoder_cfg: DecoderConfig { backslash_convert_slashes: true, path_separators_decode: true, path_separators_compress: true,
            convert_lowercase: true, utf8_convert_bestfit: true, u_encoding_decode: true, ..d }, ..c },
        HtpServerPersonality::APACHE_2 => Config { requestline_leading_whitespace_unwanted: HtpUnwanted::CODE_400, decoder_cfg: DecoderConfig { backslash_convert_slashes: false, path_separators_decode: false, path_separators_compress: true,
            u_encoding_decode: false, url_encoding_invalid_handling: HtpUrlEncodingHandling::PRESERVE_PERCENT, url_encoding_invalid_unwanted: HtpUnwanted::CODE_400, control_chars_unwanted: HtpUnwanted::IGNORE, ..d }, ..c },
        HtpServerPersonality::IIS_5_1 => Config { requestline_leading_whitespace_unwanted: HtpUnwanted::IGNORE, decoder_cfg: DecoderConfig { backslash_convert_slashes: true, path_separators_decode: true, path_separators_compress: true,
            u_encoding_decode: false, url_encoding_invalid_handling: HtpUrlEncodingHandling::PRESERVE_PERCENT, control_chars_unwanted: HtpUnwanted::IGNORE, ..d }, ..c },
        HtpServerPersonality::IIS_6_0 => Config { requestline_leading_whitespace_unwanted: HtpUnwanted::IGNORE, decoder_cfg: DecoderConfig { backslash_convert_slashes: true, path_separators_decode: true, path_separators_compress: true,
            u_encoding_decode: true, url_encoding_invalid_handling: HtpUrlEncodingHandling::PRESERVE_PERCENT, u_encoding_unwanted: HtpUnwanted::CODE_400, control_chars_unwanted: HtpUnwanted::CODE_400, ..d }, ..c },
        HtpServerPersonality::IIS_7_0 | HtpServerPersonality::IIS_7_5 => Config { requestline_leading_whitespace_unwanted: HtpUnwanted::IGNORE, decoder_cfg: DecoderConfig { backslash_convert_slashes: true, path_separators_decode: true, path_separators_compress: true,
            u_encoding_decode: true, url_encoding_invalid_handling: HtpUrlEncodingHandling::PRESERVE_PERCENT, url_encoding_invalid_unwanted: HtpUnwanted::CODE_400, control_chars_unwanted: HtpUnwanted::CODE_400, ..d }, ..c },
        _ => c,
    }
}
/*@ fn config.rs::Config::set_server_personality
ret: r
spec: ensures ({
    let known = personality != HtpServerPersonality::IIS_4_0 && personality != HtpServerPersonality::IIS_5_0;
    &&& r is Ok == known && (r is Ok || r->Err_0 == HtpStatus::ERROR)
    &&& known ==> *final(self) == (Config { server_personality: personality, ..vx_personality(*old(self), personality) })
    &&& !known ==> *final(self) == *old(self)
}),
@*/
// ---- the C interface: a null pointer is ignored, otherwise the same (0 and 1 stand for false and true)
/*@ fn c_api/config.rs::htp_config_register_log
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_log: o.hook_log.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_body_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_body_data: o.hook_request_body_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_complete
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_complete: o.hook_request_complete.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_headers
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_headers: o.hook_request_headers.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_header_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_header_data: o.hook_request_header_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_line
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_line: o.hook_request_line.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_start
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_start: o.hook_request_start.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_trailer
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_trailer: o.hook_request_trailer.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_request_trailer_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_request_trailer_data: o.hook_request_trailer_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_body_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_body_data: o.hook_response_body_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_complete
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_complete: o.hook_response_complete.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_headers
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_headers: o.hook_response_headers.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_header_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_header_data: o.hook_response_header_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_start
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_start: o.hook_response_start.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_trailer
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_trailer: o.hook_response_trailer.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_response_trailer_data
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_response_trailer_data: o.hook_response_trailer_data.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_register_transaction_complete
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { hook_transaction_complete: o.hook_transaction_complete.regx(cbk_fn), ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_backslash_convert_slashes
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { backslash_convert_slashes: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { backslash_convert_slashes: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_bestfit_replacement_byte
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; 0 <= b <= 255 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { bestfit_map: UnicodeBestfitMap { replacement_byte: b as u8, ..o.decoder_cfg.bestfit_map }, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_compression_bomb_limit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
pre: bomblimit . try_into ( ) =>> vx_wide(bomblimit)
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { compression_options: Options { bomb_limit: bomblimit as u64, ..o.compression_options }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_compression_time_limit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { compression_options: Options { time_limit: timelimit as u32, ..o.compression_options }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_convert_lowercase
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { convert_lowercase: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { convert_lowercase: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_field_limit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { field_limit: field_limit, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_lzma_memlimit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { compression_options: final(cfg->0).compression_options, ..o }) && final(cfg->0).compression_options.lzma is Some == (memlimit != 0) && (memlimit != 0 ==> final(cfg->0).compression_options.lzma->0.memlimit == Some(memlimit)) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_lzma_layers
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
pre: limit . try_into ( ) . ok ( ) =>> vx_pos(limit)
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { compression_options: Options { lzma_layers: if limit <= 0 { None } else { Some(limit as u32) }, ..o.compression_options }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_max_tx
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { max_tx: limit, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_nul_encoded_terminates
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { nul_encoded_terminates: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { nul_encoded_terminates: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_nul_raw_terminates
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { nul_raw_terminates: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { nul_raw_terminates: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_path_separators_compress
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { path_separators_compress: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { path_separators_compress: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_plusspace_decode
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { plusspace_decode: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { plusspace_decode: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_path_separators_decode
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { path_separators_decode: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { path_separators_decode: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_request_decompression
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { request_decompression_enabled: true, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { request_decompression_enabled: false, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_decompression_layer_limit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
pre: limit . try_into ( ) . ok ( ) =>> vx_pos(limit)
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { compression_options: Options { layer_limit: if limit <= 0 { None } else { Some(limit as u32) }, ..o.compression_options }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_allow_space_uri
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { allow_space_uri: allow_space, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_u_encoding_decode
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { u_encoding_decode: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { u_encoding_decode: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_url_encoding_invalid_handling
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { url_encoding_invalid_handling: handling, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_utf8_convert_bestfit
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (enabled == 1 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { utf8_convert_bestfit: true, ..o.decoder_cfg }, ..o })) && (enabled == 0 ==> *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { utf8_convert_bestfit: false, ..o.decoder_cfg }, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_double_decode_normalized_query
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { double_decode_normalized_query: set, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_double_decode_normalized_path
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { double_decode_normalized_path: set, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_normalized_uri_include_all
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; *final(cfg->0) == (Config { decoder_cfg: DecoderConfig { normalized_uri_include_all: set, ..o.decoder_cfg }, ..o }) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_tx_auto_destroy
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (tx_auto_destroy == 1 ==> *final(cfg->0) == (Config { tx_auto_destroy: true, ..o })) && (tx_auto_destroy == 0 ==> *final(cfg->0) == (Config { tx_auto_destroy: false, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_flush_incomplete
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (flush_incomplete == 1 ==> *final(cfg->0) == (Config { flush_incomplete: true, ..o })) && (flush_incomplete == 0 ==> *final(cfg->0) == (Config { flush_incomplete: false, ..o })) }),
@*/
/*@ fn c_api/config.rs::htp_config_set_parse_urlencoded
presig: unsafe extern "C" fn =>> fn
presig: cfg : * mut Config =>> cfg: Option<&mut Config>
pre: cfg . as_mut ( ) =>> cfg
presig: libc :: c_int =>> i32
presig: libc :: size_t =>> usize
presig: libc :: c_uint =>> u32
spec: ensures cfg is Some ==> ({ let o = *cfg->0; (parse_urlencoded == 1 ==> *final(cfg->0) == (Config { parse_urlencoded: true, ..o })) && (parse_urlencoded == 0 ==> *final(cfg->0) == (Config { parse_urlencoded: false, ..o })) }),
@*/
pub fn vx_pos(n: i32) -> (r: Option<u32>) ensures n >= 0 ==> r == Some(n as u32) { if n >= 0 { Some(n as u32) } else { None } }
pub fn vx_wide(n: usize) -> (r: core::result::Result<u64, ()>) ensures r == Ok::<u64, ()>(n as u64) { Ok(n as u64) }
fn main() {}
}
