//! P19: each configuration setting changes only what it names; a personality selects exactly its settings; a connection
//! uses the configuration it was created with.
use harness::*;
use htp::c_api::config as c;
use htp::config::*;
use htp::hook::*;
use htp::log::HtpLogLevel;
use std::collections::BTreeMap;

type Snap = BTreeMap<&'static str, String>;
fn cbs<E: Copy, N: Copy>(h: &Hook<E, N>, ptr: impl Fn(&Callback<E, N>) -> String) -> String { h.callbacks.iter().map(ptr).collect::<Vec<_>>().join(",") }
fn tx(h: &TxHook) -> String { cbs(h, |x| match x { Callback::External(f) => format!("x{:x}", *f as usize), Callback::Native(f) => format!("n{:x}", *f as usize) }) }
fn da(h: &DataHook) -> String { cbs(h, |x| match x { Callback::External(f) => format!("x{:x}", *f as usize), Callback::Native(f) => format!("n{:x}", *f as usize) }) }
fn lo(h: &LogHook) -> String { cbs(h, |x| match x { Callback::External(f) => format!("x{:x}", *f as usize), Callback::Native(f) => format!("n{:x}", *f as usize) }) }
macro_rules! put { ($s:ident, $o:expr, $($f:ident),*) => { $( $s.insert(stringify!($f), format!("{:?}", $o.$f)); )* } }
macro_rules! hooks { ($s:ident, $o:expr, $k:ident, $($f:ident),*) => { $( $s.insert(stringify!($f), $k(&$o.$f)); )* } }
fn snap(g: &Config) -> Snap {
    let mut s = Snap::new();
    put!(s, g, field_limit, log_level, tx_auto_destroy, server_personality, response_decompression_enabled, parse_urlencoded, parse_request_auth, requestline_leading_whitespace_unwanted, request_decompression_enabled, flush_incomplete, max_tx);
    s.insert("parameter_processor", format!("{:?}", g.parameter_processor.map(|f| f as usize)));
    let d = &g.decoder_cfg;
    put!(s, d, double_decode_normalized_path, double_decode_normalized_query, backslash_convert_slashes, convert_lowercase, path_separators_compress, path_separators_decode, plusspace_decode, path_separators_encoded_unwanted,
        nul_raw_terminates, nul_raw_unwanted, control_chars_unwanted, allow_space_uri, u_encoding_decode, u_encoding_unwanted, url_encoding_invalid_handling, url_encoding_invalid_unwanted, nul_encoded_terminates, nul_encoded_unwanted,
        normalized_uri_include_all, utf8_invalid_unwanted, utf8_convert_bestfit);
    s.insert("bestfit_map", format!("{:p}", d.bestfit_map.map));
    s.insert("replacement_byte", format!("{:?}", d.bestfit_map.replacement_byte));
    let o = &g.compression_options;
    s.insert("lzma_memlimit", format!("{:?}", o.get_lzma_memlimit()));
    s.insert("lzma_layers", format!("{:?}", o.get_lzma_layers()));
    s.insert("bomb_limit", format!("{:?}", o.get_bomb_limit()));
    s.insert("bomb_ratio", format!("{:?}", o.get_bomb_ratio()));
    s.insert("time_limit", format!("{:?}", o.get_time_limit()));
    s.insert("time_test_freq", format!("{:?}", o.get_time_test_freq()));
    s.insert("layer_limit", format!("{:?}", o.get_layer_limit()));
    hooks!(s, g, tx, hook_request_start, hook_request_line, hook_request_uri_normalize, hook_request_headers, hook_request_trailer, hook_request_complete, hook_response_start, hook_response_line, hook_response_headers, hook_response_trailer, hook_response_complete, hook_transaction_complete);
    hooks!(s, g, da, hook_request_header_data, hook_request_body_data, hook_request_trailer_data, hook_response_header_data, hook_response_body_data, hook_response_trailer_data);
    hooks!(s, g, lo, hook_log);
    s
}
/// (what the call is, which settings it sets to what, the call)
struct Call { name: String, sets: Vec<(&'static str, String)>, run: Box<dyn Fn(&mut Config)> }
fn call(v: &mut Vec<Call>, name: impl Into<String>, sets: Vec<(&'static str, String)>, run: impl Fn(&mut Config) + 'static) { v.push(Call { name: name.into(), sets, run: Box::new(run) }) }
const UNW: [HtpUnwanted; 3] = [HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404];
const INV: [HtpUrlEncodingHandling; 3] = [HtpUrlEncodingHandling::PRESERVE_PERCENT, HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID];
macro_rules! same { ($v:ident, $vals:expr, $($set:ident $f:ident),*) => { $( for x in $vals { call(&mut $v, format!("{}({:?})", stringify!($set), x), vec![(stringify!($f), format!("{:?}", x))], move |g| { g.$set(x); }) } )* } }
macro_rules! capi { ($v:ident, $($set:ident $f:ident),*) => { $( for x in [0, 1] { call(&mut $v, format!("{}({})", stringify!($set), x), vec![(stringify!($f), format!("{:?}", x == 1))], move |g| unsafe { c::$set(g, x) }) } )* } }
macro_rules! copt { ($v:ident, $vals:expr, $($set:ident $f:ident),*) => { $( for x in $vals { call(&mut $v, format!("{}({:?})", stringify!($set), x), vec![(stringify!($f), format!("{:?}", x))], move |g| unsafe { c::$set(g, x); }) } )* } }
macro_rules! opt { ($v:ident, $vals:expr, $($set:ident $f:ident),*) => { $( for x in $vals { call(&mut $v, format!("compression_options.{}({:?})", stringify!($set), x), vec![(stringify!($f), format!("{:?}", x))], move |g| { g.compression_options.$set(x); }) } )* } }
fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    same!(v, [true, false], set_double_decode_normalized_path double_decode_normalized_path, set_double_decode_normalized_query double_decode_normalized_query, set_parse_urlencoded parse_urlencoded,
        set_allow_space_uri allow_space_uri, set_tx_auto_destroy tx_auto_destroy, set_flush_incomplete flush_incomplete, set_nul_raw_terminates nul_raw_terminates, set_nul_encoded_terminates nul_encoded_terminates,
        set_u_encoding_decode u_encoding_decode, set_backslash_convert_slashes backslash_convert_slashes, set_path_separators_decode path_separators_decode, set_path_separators_compress path_separators_compress,
        set_plusspace_decode plusspace_decode, set_convert_lowercase convert_lowercase, set_utf8_convert_bestfit utf8_convert_bestfit, set_normalized_uri_include_all normalized_uri_include_all, set_request_decompression request_decompression_enabled);
    same!(v, UNW, set_u_encoding_unwanted u_encoding_unwanted, set_control_chars_unwanted control_chars_unwanted, set_url_encoding_invalid_unwanted url_encoding_invalid_unwanted, set_requestline_leading_whitespace_unwanted requestline_leading_whitespace_unwanted);
    same!(v, INV, set_url_encoding_invalid_handling url_encoding_invalid_handling);
    same!(v, [0usize, 1, 17, 18000, usize::MAX], set_field_limit field_limit);
    same!(v, [0u8, b'?', b'x', 255], set_bestfit_replacement_byte replacement_byte);
    same!(v, [None, Some(0u32), Some(1), Some(5), Some(u32::MAX)], set_decompression_layer_limit layer_limit);
    opt!(v, [None, Some(0u32), Some(3)], set_lzma_layers lzma_layers, set_layer_limit layer_limit);
    opt!(v, [0u64, 1, 1 << 20, u64::MAX], set_bomb_limit bomb_limit, set_bomb_ratio bomb_ratio);
    opt!(v, [0u32, 1, 100, u32::MAX], set_time_limit time_limit, set_time_test_freq time_test_freq);
    opt!(v, [0usize, 1, 4096, usize::MAX], set_lzma_memlimit lzma_memlimit);
    capi!(v, htp_config_set_backslash_convert_slashes backslash_convert_slashes, htp_config_set_convert_lowercase convert_lowercase, htp_config_set_nul_encoded_terminates nul_encoded_terminates, htp_config_set_nul_raw_terminates nul_raw_terminates,
        htp_config_set_path_separators_compress path_separators_compress, htp_config_set_plusspace_decode plusspace_decode, htp_config_set_path_separators_decode path_separators_decode, htp_config_set_request_decompression request_decompression_enabled,
        htp_config_set_u_encoding_decode u_encoding_decode, htp_config_set_utf8_convert_bestfit utf8_convert_bestfit, htp_config_set_tx_auto_destroy tx_auto_destroy, htp_config_set_flush_incomplete flush_incomplete, htp_config_set_parse_urlencoded parse_urlencoded);
    copt!(v, [true, false], htp_config_set_allow_space_uri allow_space_uri, htp_config_set_double_decode_normalized_query double_decode_normalized_query, htp_config_set_double_decode_normalized_path double_decode_normalized_path, htp_config_set_normalized_uri_include_all normalized_uri_include_all);
    copt!(v, [0usize, 1, 99, 1 << 40], htp_config_set_field_limit field_limit, htp_config_set_compression_bomb_limit bomb_limit, htp_config_set_lzma_memlimit lzma_memlimit);
    copt!(v, [0u32, 7, u32::MAX], htp_config_set_compression_time_limit time_limit, htp_config_set_max_tx max_tx);
    copt!(v, [0, 65, 255], htp_config_set_bestfit_replacement_byte replacement_byte);
    copt!(v, INV, htp_config_set_url_encoding_invalid_handling url_encoding_invalid_handling);
    for x in [-1, 0, 1, 9] {
        let w = if x <= 0 { "None".to_string() } else { format!("Some({})", x) };
        call(&mut v, format!("htp_config_set_lzma_layers({})", x), vec![("lzma_layers", w.clone())], move |g| unsafe { c::htp_config_set_lzma_layers(g, x) });
        call(&mut v, format!("htp_config_set_decompression_layer_limit({})", x), vec![("layer_limit", w)], move |g| unsafe { c::htp_config_set_decompression_layer_limit(g, x) });
    }
    call(&mut v, "htp_config_set_parse_request_cookies", vec![], |g| unsafe { c::htp_config_set_parse_request_cookies(g, 1) });
    let m = DecoderConfig::default().bestfit_map;
    call(&mut v, "set_bestfit_map", vec![("bestfit_map", format!("{:p}", m.map)), ("replacement_byte", format!("{}", m.replacement_byte))], move |g| g.set_bestfit_map(m));
    use HtpServerPersonality::*;
    for p in [MINIMAL, GENERIC, IDS, IIS_4_0, IIS_5_0, IIS_5_1, IIS_6_0, IIS_7_0, IIS_7_5, APACHE_2] {
        let (i, b4) = ("IGNORE".to_string(), "CODE_400".to_string());
        let (t, f, pp) = ("true".to_string(), "false".to_string(), "PRESERVE_PERCENT".to_string());
        let mut s = vec![("server_personality", format!("{:?}", p))];
        let three = |s: &mut Vec<(&'static str, String)>, b: &str, d: &str| { s.push(("backslash_convert_slashes", b.into())); s.push(("path_separators_decode", d.into())); s.push(("path_separators_compress", "true".into())); };
        match p {
            MINIMAL => {}
            GENERIC => three(&mut s, "true", "true"),
            IDS => { three(&mut s, "true", "true"); s.extend([("convert_lowercase", t.clone()), ("utf8_convert_bestfit", t.clone()), ("u_encoding_decode", t.clone()), ("requestline_leading_whitespace_unwanted", i.clone())]) }
            APACHE_2 => { three(&mut s, "false", "false"); s.extend([("u_encoding_decode", f), ("url_encoding_invalid_handling", pp), ("url_encoding_invalid_unwanted", b4.clone()), ("control_chars_unwanted", i), ("requestline_leading_whitespace_unwanted", b4)]) }
            IIS_5_1 => { three(&mut s, "true", "true"); s.extend([("u_encoding_decode", f), ("url_encoding_invalid_handling", pp), ("control_chars_unwanted", i.clone()), ("requestline_leading_whitespace_unwanted", i)]) }
            IIS_6_0 => { three(&mut s, "true", "true"); s.extend([("u_encoding_decode", t), ("url_encoding_invalid_handling", pp), ("u_encoding_unwanted", b4.clone()), ("control_chars_unwanted", b4), ("requestline_leading_whitespace_unwanted", i)]) }
            IIS_7_0 | IIS_7_5 => { three(&mut s, "true", "true"); s.extend([("u_encoding_decode", t), ("url_encoding_invalid_handling", pp), ("url_encoding_invalid_unwanted", b4.clone()), ("control_chars_unwanted", b4), ("requestline_leading_whitespace_unwanted", i)]) }
            _ => s.clear(),
        }
        let ok = !s.is_empty();
        call(&mut v, format!("set_server_personality({:?})", p), s.clone(), move |g| assert_eq!(g.set_server_personality(p).is_ok(), ok));
        call(&mut v, format!("htp_config_set_server_personality({:?})", p), s, move |g| assert_eq!(unsafe { c::htp_config_set_server_personality(g, p) } == htp::HtpStatus::OK, ok));
    }
    v
}
fn randomize(r: &mut Rng, g: &mut Config, cs: &[Call]) -> Vec<String> {
    let n = r.below(12);
    (0..n).map(|_| { let k = &cs[r.below(cs.len())]; (k.run)(g); k.name.clone() }).collect()
}
fn set1(c: &mut Ctx, cs: &[Call], r: &mut Rng, k: &Call) {
    let mut g = Config::default();
    let hist = randomize(r, &mut g, cs);
    let key = format!("{:?}{}", hist, k.name);
    c.check("a setter", key.as_bytes(), true, &|| format!("{:?} then {}", hist, k.name), || {
        let mut want = snap(&g);
        for (f, x) in &k.sets { want.insert(f, x.clone()); }
        (k.run)(&mut g);
        let got = snap(&g);
        for (f, x) in &want { if got[f] != *x { return Err(format!("setting {} is {}, the contract says {}", f, got[f], x)); } }
        Ok(())
    });
}
/// the connection and every transaction see the same settings
fn conn(c: &mut Ctx, cs: &[Call], r: &mut Rng) {
    let mut g = Config::default();
    let mut hist = randomize(r, &mut g, cs);
    g.log_level = *r.pick(&[HtpLogLevel::NONE, HtpLogLevel::ERROR, HtpLogLevel::DEBUG]);
    if g.max_tx == 0 { g.max_tx = 5 }
    if g.field_limit < 100 { g.field_limit = 100 }
    g.tx_auto_destroy = false;
    hist.push(format!("max_tx {}", g.max_tx));
    let want = snap(&g);
    c.check("a connection's configuration", format!("{:?}", hist).as_bytes(), true, &|| format!("{:?}", hist), || {
        let mut d = Driver::new(g);
        for _ in 0..2 { d.req(b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n"); d.res(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"); }
        Ctx::eq(snap(&d.p.cfg), want.clone())?;
        for i in 0..2 { if let Some(t) = d.tx(i) { Ctx::eq(snap(&t.cfg), want.clone())?; } else { return Err("no transaction".into()); } }
        Ok(())
    });
}
/// registering a callback adds it to its own event only
macro_rules! reg { ($c:ident, $native:expr, $k:ident, $($set:ident $h:ident),*) => { $( for n in 0..3 {
    $c.check("register", format!("{} {}", stringify!($set), n).as_bytes(), true, &|| format!("{} after {} others", stringify!($set), n), || {
        let mut g = Config::default();
        for _ in 0..n { rec::register(&mut g); }
        let mut want = snap(&g);
        let x: String = { let mut o = Config::default(); o.$h.register($native); $k(&o.$h) };
        let old = want[stringify!($h)].clone();
        want.insert(stringify!($h), if old.is_empty() { x } else { format!("{},{}", old, x) });
        g.$set($native);
        Ctx::eq(snap(&g), want)
    });
} )* } }
unsafe extern "C" fn xtx(_: *const htp::connection_parser::ConnectionParser, _: *mut htp::transaction::Transaction) -> htp::HtpStatus { htp::HtpStatus::OK }
unsafe extern "C" fn xda(_: *const htp::connection_parser::ConnectionParser, _: *mut htp::transaction::Data) -> htp::HtpStatus { htp::HtpStatus::OK }
unsafe extern "C" fn xlo(_: *mut htp::log::Log) -> htp::HtpStatus { htp::HtpStatus::OK }
macro_rules! regx { ($c:ident, $f:expr, $k:ident, $($set:ident $h:ident),*) => { $( {
    $c.check("register from C", stringify!($set).as_bytes(), true, &|| stringify!($set).to_string(), || {
        let mut g = Config::default();
        rec::register(&mut g);
        let mut want = snap(&g);
        let x: String = { let mut o = Config::default(); o.$h.register_extern($f); $k(&o.$h) };
        let old = want[stringify!($h)].clone();
        want.insert(stringify!($h), if old.is_empty() { x } else { format!("{},{}", old, x) });
        unsafe { c::$set(&mut g, $f) };
        Ctx::eq(snap(&g), want)
    });
} )* } }
fn ntx(_: &mut htp::transaction::Transaction) -> htp::error::Result<()> { Ok(()) }
fn nda(_: &mut htp::transaction::Transaction, _: &htp::connection_parser::ParserData) -> htp::error::Result<()> { Ok(()) }
fn nlo(_: &mut htp::log::Log) -> htp::error::Result<()> { Ok(()) }
fn main() {
    run("every case calls a setter", |c| {
        let cs = calls();
        let mut r = c.rng.clone();
        c.phase("every setter and value", 30);
        for k in &cs { for _ in 0..10 { set1(c, &cs, &mut r, k); } }
        reg!(c, ntx, tx, register_request_start hook_request_start, register_request_line hook_request_line, register_request_headers hook_request_headers, register_request_trailer hook_request_trailer, register_request_complete hook_request_complete,
            register_response_start hook_response_start, register_response_line hook_response_line, register_response_headers hook_response_headers, register_response_trailer hook_response_trailer, register_response_complete hook_response_complete, register_transaction_complete hook_transaction_complete);
        reg!(c, nda, da, register_request_header_data hook_request_header_data, register_request_body_data hook_request_body_data, register_request_trailer_data hook_request_trailer_data, register_response_header_data hook_response_header_data, register_response_body_data hook_response_body_data, register_response_trailer_data hook_response_trailer_data);
        reg!(c, nlo, lo, register_log hook_log);
        regx!(c, xtx, tx, htp_config_register_request_complete hook_request_complete, htp_config_register_request_headers hook_request_headers, htp_config_register_request_line hook_request_line, htp_config_register_request_start hook_request_start, htp_config_register_request_trailer hook_request_trailer,
            htp_config_register_response_complete hook_response_complete, htp_config_register_response_headers hook_response_headers, htp_config_register_response_start hook_response_start, htp_config_register_response_trailer hook_response_trailer, htp_config_register_transaction_complete hook_transaction_complete);
        regx!(c, xda, da, htp_config_register_request_body_data hook_request_body_data, htp_config_register_request_header_data hook_request_header_data, htp_config_register_request_trailer_data hook_request_trailer_data,
            htp_config_register_response_body_data hook_response_body_data, htp_config_register_response_header_data hook_response_header_data, htp_config_register_response_trailer_data hook_response_trailer_data);
        regx!(c, xlo, lo, htp_config_register_log hook_log);
        c.phase("random histories of setters", 60);
        while !c.done() {
            let k = r.below(cs.len());
            set1(c, &cs, &mut r, &cs[k]);
            if r.chance(1, 8) { conn(c, &cs, &mut r); }
        }
    });
}
